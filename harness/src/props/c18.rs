//! C18: signature help describes the arguments valid for the attribute.
use super::util::*;
use crate::attrs::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C18",
    rule: "a case is a generated valid file, in a part of the cases with one half-typed ink! attribute on an additional item, asked for signature help at places inside and outside of attribute parentheses; non-trivial: at least one place is inside the parentheses of an attribute that takes arguments",
    quick: 14000,
    thorough: 400000,
    run,
    fixed: None,
    shrink_evals: 1500,
    assumptions: &["the order of the parameters and the active parameter when the cursor is at no argument are not specified"],
    threads: 8,
};
type Group = BTreeSet<String>;
fn set(x: &[&str]) -> Group {
    x.iter().map(|x| x.to_string()).collect()
}
/// The arguments of an attribute macro.
fn macro_args(path: &str, v5: bool) -> Group {
    match path {
        "ink::chain_extension" if v5 => set(&["extension"]),
        "ink::contract" => set(&["env", "keep_attr"]),
        "ink::event" if v5 => set(&["anonymous", "signature_topic"]),
        "ink::scale_derive" if v5 => set(&["Encode", "Decode", "TypeInfo"]),
        "ink::storage_item" => set(&["derive"]),
        "ink::trait_definition" => set(&["keep_attr", "namespace"]),
        "ink_e2e::test" if v5 => set(&["backend", "environment"]),
        "ink_e2e::test" => set(&["additional_contracts", "environment", "keep_attr"]),
        _ => set(&[]),
    }
}
/// The arguments that go together with an entity argument.
fn group(entity: &str, v5: bool) -> Group {
    match entity {
        "event" if v5 => set(&["event", "anonymous", "signature_topic"]),
        "event" => set(&["event", "anonymous"]),
        "constructor" => set(&["constructor", "default", "payable", "selector"]),
        "message" => set(&["message", "default", "payable", "selector"]),
        "extension" => set(&["extension", "handle_status"]),
        "function" => set(&["function", "handle_status"]),
        "impl" => set(&["impl", "namespace"]),
        x => set(&[x]),
    }
}
fn entity<'a>(attrs: impl IntoIterator<Item = &'a Attr>) -> Option<&'a Arg> {
    attrs.into_iter().filter(|a| a.kind == AttrKind::Ink).flat_map(|a| &a.args).find(|a| ENTITY_ARGS.contains(&a.name.as_str()))
}
/// What is expected in the parentheses of an attribute of a list (None: not specified).
fn expected(list: &[Attr], at: &Attr, v5: bool) -> Option<Vec<Group>> {
    if let AttrKind::Macro(p) = &at.kind {
        let g = macro_args(p, v5);
        return Some(if g.is_empty() { vec![] } else { vec![g] });
    }
    if let Some(e) = entity([at]).or_else(|| entity(list)) {
        return Some(vec![group(&e.name, v5)]);
    }
    if list.iter().any(|a| matches!(a.kind, AttrKind::Macro(_))) {
        return None;
    }
    match at.args.first()?.name.as_str() {
        "namespace" if at.args.len() == 1 => Some(vec![set(&["namespace"]), group("impl", v5)]),
        _ => None,
    }
}
/// Checks the answer at an offset inside the parentheses.
fn check(text: &str, o: usize, v5: bool, parens: (usize, usize), want: &[Group], at: Option<&str>, prefix: Option<&str>) -> Result<(), Fail> {
    let got = analyze(text, v5).signature_help(ts(o));
    let near = |o: usize| {
        let (mut a, mut b) = (o.saturating_sub(40), (o + 40).min(text.len()));
        while !text.is_char_boundary(a) {
            a -= 1;
        }
        while !text.is_char_boundary(b) {
            b += 1;
        }
        format!("`{}|{}` ({})", &text[a..o], &text[o..b], if v5 { "v5" } else { "v4" })
    };
    let mut have: Vec<Group> = vec![];
    for h in &got {
        if r(h.range) != (parens.0 + 1, parens.1 - 1) {
            return fail("wrong range", format!("{:?} instead of {:?} at {}", h.range, (parens.0 + 1, parens.1 - 1), near(o)), text);
        }
        let mut names = vec![];
        let mut parts = vec![];
        for p in &h.parameters {
            let (x, y) = r(p.range);
            let Some(t) = h.label.get(x..y) else { return fail("parameter outside of the label", format!("{h:?}"), text) };
            parts.push(t.to_string());
            names.push(t.split(':').next().unwrap().to_string());
        }
        let g: Group = names.iter().cloned().collect();
        if g.len() != names.len() || parts.join(", ") != h.label {
            return fail("parameters do not make up the label", format!("{parts:?} `{}`", h.label), text);
        }
        for (n, p) in names.iter().zip(&parts) {
            let t = value_type(n, v5, g.contains("constructor"));
            let want = if t.is_empty() { n.clone() } else { format!("{n}: {t}") };
            if *p != want {
                return fail("wrong parameter", format!("`{p}` instead of `{want}`"), text);
            }
        }
        let act = h.active_parameter;
        if act.is_some_and(|a| a >= names.len()) {
            return fail("active parameter does not exist", format!("{h:?}"), text);
        }
        if let Some(i) = at.and_then(|a| names.iter().position(|n| n == a)) {
            if act != Some(i) {
                return fail("wrong active parameter", format!("{act:?} instead of {i} in `{}` at {}", h.label, near(o)), text);
            }
        } else if let Some(p) = prefix.filter(|p| !p.is_empty()) {
            let ok: Vec<usize> = (0..names.len()).filter(|i| names[*i].starts_with(p)).collect();
            if !ok.is_empty() && !act.is_some_and(|a| ok.contains(&a)) {
                return fail("wrong active parameter by prefix", format!("{act:?} in `{}` at {}", h.label, near(o)), text);
            }
        }
        have.push(g);
    }
    let (mut x, mut y) = (have.clone(), want.to_vec());
    x.sort();
    y.sort();
    if x != y {
        return fail("wrong arguments", format!("{:?} instead of {y:?} at {}", got.iter().map(|h| &h.label).collect::<Vec<_>>(), near(o)), text);
    }
    Ok(())
}
/// Adds an item with a half-typed `#[ink(...)]` attribute: the attribute and the groups it can become.
fn half_typed(s: &mut Src, f: &mut File, v5: bool) -> Option<(Id, String, Vec<Group>, &'static str)> {
    let pick = |s: &mut Src, f: &File, role: Role| {
        let ids = f.ids(|i, _| i.role == role);
        if ids.is_empty() {
            None
        } else {
            Some(*s.pick(&ids))
        }
    };
    let ext = if v5 { "function" } else { "extension" };
    let (ctx, parent, entities): (&'static str, Id, Vec<&str>) = match s.below(6) {
        0 => ("struct in contract", pick(s, f, Role::Contract)?, vec!["storage", "event"]),
        1 => ("fn in impl", pick(s, f, Role::Impl)?, vec!["constructor", "message"]),
        2 => ("fn in trait definition", pick(s, f, Role::TraitDef)?, vec!["message"]),
        3 => ("fn in chain extension", pick(s, f, Role::ChainExt)?, vec![ext]),
        4 => ("field of event", if s.bool() && v5 { pick(s, f, Role::EventV2)? } else { pick(s, f, Role::Event)? }, vec!["topic"]),
        _ => ("impl in contract", pick(s, f, Role::Contract)?, vec!["impl"]),
    };
    // All arguments that are possible here.
    let mut groups: Vec<Group> = entities.iter().map(|e| group(e, v5)).collect();
    if entities == ["impl"] {
        groups.push(set(&["namespace"]));
    }
    let all: Group = groups.iter().flatten().cloned().collect();
    let full = s.pick(&all.iter().cloned().collect::<Vec<_>>()).clone();
    let prefix = if s.chance(1, 4) { String::new() } else { full[..s.range(1, full.len() - 1)].to_string() };
    // `const` is a keyword, which is no name of an argument.
    if ARGS.contains(&prefix.as_str()) || prefix == "const" {
        return None;
    }
    let want: Vec<Group> = groups.into_iter().filter(|g| g.iter().any(|a| a.starts_with(&prefix))).collect();
    let args = if prefix.is_empty() { vec![] } else { vec![arg(f, &prefix, Val::None)] };
    let a = ink(f, args);
    let aid = a.id;
    let id = f.id();
    let mk = |kind: Kind, name: &str| Item { id, role: Role::Plain, attrs: vec![a.clone()], vis: None, name: name.into(), kind };
    let item = match ctx {
        "struct in contract" => mk(Kind::Struct { generics: None, fields: Fields::Unit }, "VpNew"),
        "fn in impl" => mk(Kind::Fn(Fun { recv: Some("&self".into()), ..fun() }), "vp_new"),
        "fn in trait definition" | "fn in chain extension" => mk(Kind::Fn(Fun { recv: Some("&self".into()), body: None, ..fun() }), "vp_new"),
        "impl in contract" => {
            let st = f.get(parent)?.children().iter().find(|i| i.role == Role::Storage)?.name.clone();
            mk(Kind::Impl { quals: vec![], generics: None, trait_: None, self_ty: st, self_generics: None, items: vec![] }, "")
        }
        _ => {
            let fd = Field { id, attrs: vec![a], vis: None, name: Some("vp_new".into()), ty: "u8".into() };
            return f.with(parent, |i| match &mut i.kind {
                Kind::Struct { fields: Fields::Named(v), .. } => {
                    v.push(fd);
                    Some((aid, prefix, want, ctx))
                }
                _ => None,
            })?;
        }
    };
    f.with(parent, |i| i.children_mut().map(|c| c.push(item)))??;
    Some((aid, prefix, want, ctx))
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut f = valid_file(s, v5, Opts::default());
    // Parentheses of macros.
    for _ in 0..s.below(4) {
        let ids = f.ids(|i, _| i.attrs.iter().any(|a| matches!(a.kind, AttrKind::Macro(_))));
        if !ids.is_empty() {
            let id = *s.pick(&ids);
            f.with(id, |i| i.attrs.iter_mut().filter(|a| matches!(a.kind, AttrKind::Macro(_))).for_each(|a| a.parens = true));
        }
    }
    // Help does not depend on which of an item's attributes comes first.
    for _ in 0..s.below(3) {
        let ids = f.ids(|i, _| i.attrs.iter().filter(|a| a.kind == AttrKind::Ink).count() > 1);
        if !ids.is_empty() {
            let id = *s.pick(&ids);
            f.with(id, |i| i.attrs.reverse());
        }
    }
    let half = if s.bool() { half_typed(s, &mut f, v5) } else { None };
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    let text = &doc.text;
    set_current(text);
    let mut labels = vec![if v5 { "v5".to_string() } else { "v4".into() }];
    let mut evals = 0;
    let mut hit = false;
    let lists = attr_lists(&f);
    if let Some((aid, prefix, want, ctx)) = &half {
        labels.push(ctx.to_string());
        let at = lists.iter().flatten().find(|a| a.id == *aid).unwrap();
        let parens = doc.sp(*aid, Sp::AttrArgs).unwrap();
        let o = match at.args.first() {
            Some(a) => doc.sp(a.id, Sp::ArgName).unwrap().1,
            None => parens.0 + 1,
        };
        evals += 1;
        hit = true;
        check(text, o, v5, parens, want, None, Some(prefix))?;
    }
    let inks: Vec<(&Vec<Attr>, &Attr)> = lists.iter().flat_map(|l| l.iter().filter(|a| a.is_ink()).map(move |a| (l, a))).filter(|(_, a)| half.as_ref().map(|h| h.0) != Some(a.id)).collect();
    for _ in 0..6 {
        if inks.is_empty() {
            break;
        }
        let (list, at) = *s.pick(&inks);
        if list.iter().any(|a| half.as_ref().map(|h| h.0) == Some(a.id)) {
            continue;
        }
        let whole = doc.sp(at.id, Sp::Attr).unwrap();
        let parens = doc.sp(at.id, Sp::AttrArgs);
        if s.chance(1, 3) || parens.is_none() {
            // Outside of the parentheses.
            let path = doc.sp(at.id, Sp::AttrPath).unwrap();
            let o = *s.pick(&[whole.0 + 1, path.0, path.1, parens.map_or(path.1, |p| p.1), whole.1]);
            let got = analyze(text, v5).signature_help(ts(o));
            evals += 1;
            if !got.is_empty() {
                return fail("signature outside of parentheses", format!("{o}: `{}` {:?}", &text[whole.0..whole.1], got[0].label), text.clone());
            }
            continue;
        }
        let parens = parens.unwrap();
        let Some(want) = expected(list, at, v5) else { continue };
        let (o, name) = if at.args.is_empty() || s.chance(1, 4) {
            let o = if s.bool() { parens.0 + 1 } else { parens.1 - 1 };
            (o, at.args.iter().find(|a| doc.sp(a.id, Sp::Arg).is_some_and(|p| p.0 <= o && o <= p.1)).map(|a| a.name.clone()))
        } else {
            let a = &at.args[s.below(at.args.len())];
            let (x, y) = doc.sp(a.id, *s.pick(&[Sp::Arg, Sp::ArgName])).unwrap();
            let cs: Vec<usize> = (x..=y).filter(|o| text.is_char_boundary(*o)).collect();
            (*s.pick(&cs), Some(a.name.clone()))
        };
        evals += 1;
        hit |= !want.is_empty();
        labels.push(match &at.kind {
            AttrKind::Macro(p) => p.clone(),
            _ => at.args.first().map(|a| a.name.clone()).unwrap_or_default(),
        });
        check(text, o, v5, parens, &want, name.as_deref(), None)?;
    }
    labels.sort();
    labels.dedup();
    Ok(Info { nontrivial: hit, key: fnv(text.as_bytes()), labels, sample: half.map(|h| format!("{}: `{}` -> {:?}", h.3, h.1, h.2)).unwrap_or_default(), evals })
}
