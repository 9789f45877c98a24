//! C16: hover shows the documentation of exactly the ink! element under the cursor.
use super::util::*;
use crate::attrs::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;

pub static PROP: Prop = Prop {
    id: "C16",
    rule: "a case is a generated file (valid, plus arbitrary known, unknown and misplaced ink! attributes) hovered at places in and outside of its attributes; non-trivial: at least one hovered place is in an ink! attribute",
    quick: 20000,
    thorough: 400000,
    run,
    fixed: None,
    shrink_evals: 1500,
    assumptions: &["a cursor exactly at the first or last character boundary of an attribute is not specified"],
    threads: 8,
};
/// Texts that the documentation of an argument has.
fn arg_doc(name: &str, v5: bool, e2e: bool) -> Option<Vec<&'static str>> {
    let only5 = V5_ARGS.contains(&name);
    if only5 && !v5 {
        return None;
    }
    Some(match name {
        "additional_contracts" if v5 => vec!["`additional_contracts` is deprecated"],
        "additional_contracts" => vec!["`#[ink_e2e::test(additional_contracts = S: string)]`"],
        "anonymous" if v5 => vec!["`#[ink::event(anonymous)]` or `#[ink(anonymous)]`"],
        "anonymous" => vec!["\n`#[ink(anonymous)]`\n"],
        "backend" | "node" | "url" | "runtime_only" | "sandbox" => vec!["`#[ink_e2e::test(backend(node|runtime_only))]`"],
        "constructor" => vec!["\n`#[ink(constructor)]`\n"],
        "Decode" => vec!["\n`#[ink::scale_derive(Decode)]`\n"],
        "Encode" => vec!["\n`#[ink::scale_derive(Encode)]`\n"],
        "TypeInfo" => vec!["\n`#[ink::scale_derive(TypeInfo)]`\n"],
        "default" => vec!["\n`#[ink(default)]`\n"],
        "derive" => vec!["\n`#[ink::storage_item(derive = flag: bool)]`\n"],
        "env" | "environment" => vec!["`#[ink::contract(env = E: impl Environment)]` or `#[ink_e2e::test(environment = E: impl Environment)]`"],
        "event" => vec!["\n`#[ink(event)]`\n"],
        "extension" if v5 => vec!["`#[ink::chain_extension(extension = N: u16)]`"],
        "extension" => vec!["`#[ink(extension = N: u32)]`"],
        "function" => vec!["`#[ink(function = N: u16)]`"],
        "handle_status" => vec!["`#[ink(handle_status = flag: bool)]`"],
        "impl" => vec!["\n`#[ink(impl)]`\n"],
        "keep_attr" if v5 && e2e => vec!["`keep_attr` for `ink_e2e::test` attribute macro is deprecated"],
        "keep_attr" if v5 => vec!["`#[ink::contract(keep_attr = N: string)]` or `#[ink::trait_definition(keep_attr = N: string)]`\n"],
        "keep_attr" => vec!["`#[ink_e2e::test(keep_attr = N: string)]`\n"],
        "message" => vec!["\n`#[ink(message)]`\n"],
        "namespace" => vec!["`#[ink(namespace = N: string)]`"],
        "payable" => vec!["\n`#[ink(payable)]`\n"],
        "selector" if v5 => vec!["`#[ink(selector = S: u32 | _ | @)]`\n"],
        "selector" => vec!["`#[ink(selector = S: u32 | _)]`\n"],
        "signature_topic" => vec!["`#[ink::event(signature_topic = S: string)]`"],
        "storage" => vec!["\n`#[ink(storage)]`\n"],
        "topic" if v5 => vec!["\n`#[ink(topic)]`\n", "#[ink::event]\npub struct"],
        "topic" => vec!["\n`#[ink(topic)]`\n"],
        _ => return None,
    })
}
fn macro_doc(path: &str, v5: bool) -> Option<Vec<&'static str>> {
    if !v5 && V5_MACROS.contains(&path) {
        return None;
    }
    Some(match path {
        "ink::chain_extension" if v5 => vec!["\n`#[ink::chain_extension]`\n", "#[ink::chain_extension(extension ="],
        "ink::chain_extension" => vec!["\n`#[ink::chain_extension]`\n", "#[ink(extension ="],
        "ink::contract" => vec!["\n`#[ink::contract]`\n"],
        "ink::event" => vec!["\n`#[ink::event]`\n"],
        "ink::scale_derive" => vec!["\n`#[ink::scale_derive]`\n"],
        "ink::storage_item" => vec!["\n`#[ink::storage_item]`\n"],
        "ink::test" => vec!["\n`#[ink::test]`\n"],
        "ink::trait_definition" => vec!["\n`#[ink::trait_definition]`\n"],
        "ink_e2e::test" => vec!["\n`#[ink_e2e::test]`\n"],
        _ => return None,
    })
}
/// Texts that only the documentation of the other version has.
fn foreign(name: &str, v5: bool) -> Option<&'static str> {
    match name {
        "topic" if !v5 => Some("#[ink::event]"),
        "anonymous" if !v5 => Some("#[ink::event"),
        "ink::chain_extension" if !v5 => Some("(function ="),
        "ink::chain_extension" if v5 => Some("#[ink(extension ="),
        _ => None,
    }
}
fn inside(s: &mut Src, doc: &Doc, (a, b): (usize, usize)) -> (usize, usize) {
    let cs: Vec<usize> = (a..=b).filter(|o| doc.text.is_char_boundary(*o)).collect();
    match s.below(3) {
        0 => (a, b),
        1 => {
            let x = *s.pick(&cs);
            (x, x)
        }
        _ => {
            let (x, y) = (*s.pick(&cs), *s.pick(&cs));
            (x.min(y), x.max(y))
        }
    }
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut f = valid_file(s, v5, Opts::default());
    sprinkle(s, &mut f);
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    let text = &doc.text;
    let a = analyze(text, v5);
    let lists = attr_lists(&f);
    let inks: Vec<&Attr> = lists.iter().flatten().filter(|a| a.is_ink()).collect();
    let spans: Vec<(usize, usize)> = inks.iter().map(|a| doc.sp(a.id, Sp::Attr).unwrap()).collect();
    let mut labels = vec![if v5 { "v5".to_string() } else { "v4".into() }];
    let mut evals = 0;
    let mut hit = false;
    let mut sample = String::new();
    for _ in 0..12 {
        // A place, and what it shows: (name, span of the name, e2e).
        let (rg, want): ((usize, usize), Option<(String, (usize, usize), bool)>) = if inks.is_empty() || s.chance(1, 4) {
            let cs: Vec<usize> = (0..=text.len()).filter(|o| text.is_char_boundary(*o)).collect();
            let x = *s.pick(&cs);
            let y = if s.bool() { x } else { *s.pick(&cs) };
            let (x, y) = (x.min(y), x.max(y));
            // Not in an attribute: touching none, or not in a single one.
            let touches = |p: &(usize, usize)| if x == y { p.0 <= x && x <= p.1 } else { p.0 <= x && y <= p.1 };
            if spans.iter().any(touches) {
                continue;
            }
            ((x, y), None)
        } else {
            let k = s.below(inks.len());
            let at = inks[k];
            let sp = |id: Id, k: Sp| doc.sp(id, k);
            let whole = spans[k];
            let e2e = matches!(&at.kind, AttrKind::Macro(p) if p == "ink_e2e::test");
            let own = match &at.kind {
                AttrKind::Macro(p) => Some((p.clone(), sp(at.id, Sp::AttrName).unwrap(), e2e)),
                _ => primary(&at.args).map(|i| (at.args[i].name.clone(), sp(at.args[i].id, Sp::ArgName).unwrap(), e2e)),
            };
            let places: Vec<(usize, usize)> = [Some((whole.0 + 1, whole.0 + 1)), Some(whole), sp(at.id, Sp::AttrPath), sp(at.id, Sp::AttrName), sp(at.id, Sp::AttrArgs)].into_iter().flatten().collect();
            if at.args.is_empty() || s.chance(1, 3) {
                let mut rg = *s.pick(&places);
                if s.bool() && Some(rg) != sp(at.id, Sp::AttrArgs) && rg != whole {
                    rg = inside(s, &doc, rg);
                }
                if Some(rg) == sp(at.id, Sp::AttrArgs) && s.bool() {
                    // Right after the opening paren, or right before the closing one.
                    let o = if s.bool() { rg.0 + 1 } else { rg.1 - 1 };
                    rg = (o, o);
                    if at.args.iter().any(|a| sp(a.id, Sp::Arg).is_some_and(|p| p.0 <= o && o <= p.1)) {
                        continue;
                    }
                    if at.trailing_comma && text[..o].trim_end().ends_with(',') {
                        continue;
                    }
                    let g = text.as_bytes();
                    if g[o - 1] != b'(' || g.get(o) == Some(&b'(') {
                        // Trivia may belong to the last value.
                        continue;
                    }
                }
                (rg, own)
            } else {
                let ar = &at.args[s.below(at.args.len())];
                let parts: Vec<(usize, usize)> = [sp(ar.id, Sp::ArgName), sp(ar.id, Sp::ArgVal), sp(ar.id, Sp::Arg)].into_iter().flatten().collect();
                let p = *s.pick(&parts);
                (inside(s, &doc, p), Some((ar.name.clone(), sp(ar.id, Sp::ArgName).unwrap(), e2e)))
            }
        };
        evals += 1;
        let got = a.hover(tr(rg.0, rg.1));
        let what = format!("{rg:?} `{}` ({})", clip(&text[rg.0..rg.1]), if v5 { "v5" } else { "v4" });
        let docs = want.as_ref().and_then(|(n, sp, e2e)| {
            let d = if n.contains("::") { macro_doc(n, v5) } else { arg_doc(n, v5, *e2e) };
            d.map(|d| (n.clone(), *sp, d))
        });
        match (docs, got) {
            (None, None) => (),
            (None, Some(h)) => return fail("unexpected hover", format!("{what}: {} {}", show(text, r(h.range)), clip(&h.content)), text.clone()),
            (Some((n, _, _)), None) => return fail(format!("no hover: {n}"), what, text.clone()),
            (Some((n, sp, d)), Some(h)) => {
                hit = true;
                labels.push(n.clone());
                sample = format!("{what} -> {n}");
                if r(h.range) != sp {
                    return fail("wrong hover range", format!("{what}: {} instead of {}", show(text, r(h.range)), show(text, sp)), text.clone());
                }
                if !d.iter().all(|d| h.content.contains(d)) || foreign(&n, v5).is_some_and(|x| h.content.contains(x)) {
                    return fail(format!("wrong documentation: {n}"), format!("{what}: {}", clip(&h.content)), text.clone());
                }
            }
        }
    }
    labels.sort();
    labels.dedup();
    Ok(Info { nontrivial: hit, key: fnv(text.as_bytes()), labels, sample, evals })
}
fn show(t: &str, p: (usize, usize)) -> String {
    format!("{p:?} `{}`", clip(&t[p.0..p.1]))
}
