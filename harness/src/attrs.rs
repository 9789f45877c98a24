//! Own tables about ink! attributes, and arbitrary (also invalid) ink! attributes for generated files.
use crate::core::Src;
use crate::gen::*;
use crate::model::*;

pub const ARGS: &[&str] = &[
    "additional_contracts", "anonymous", "backend", "constructor", "Decode", "default", "derive", "Encode", "env", "environment", "event", "extension", "function", "handle_status", "impl", "keep_attr", "message", "namespace", "node", "payable", "runtime_only", "sandbox", "selector",
    "signature_topic", "storage", "topic", "TypeInfo", "url",
];
/// Arguments that do not exist in ink! 4.
pub const V5_ARGS: &[&str] = &["backend", "node", "url", "runtime_only", "sandbox", "Decode", "Encode", "TypeInfo", "function", "signature_topic"];
pub const MACROS: &[&str] = &["ink::chain_extension", "ink::contract", "ink::event", "ink::scale_derive", "ink::storage_item", "ink::test", "ink::trait_definition", "ink_e2e::test"];
pub const V5_MACROS: &[&str] = &["ink::event", "ink::scale_derive"];
/// Arguments that make the annotated item an entity.
pub const ENTITY_ARGS: &[&str] = &["constructor", "event", "extension", "function", "impl", "message", "storage", "topic"];

/// The value type of an argument, as inlay hints and signatures have it.
pub fn value_type(name: &str, v5: bool, ctor: bool) -> &'static str {
    match name {
        "additional_contracts" | "keep_attr" | "namespace" | "signature_topic" | "url" => "&str",
        "backend" => "node | runtime_only",
        "derive" | "handle_status" => "bool",
        "env" | "environment" => "impl Environment",
        "extension" if v5 => "u16",
        "extension" => "u32",
        "function" => "u16",
        "sandbox" => "impl drink::Sandbox",
        "selector" if v5 && !ctor => "u32 | _ | @",
        "selector" => "u32 | _",
        _ => "",
    }
}
/// The index of the argument that decides what an `#[ink(...)]` attribute is.
pub fn primary(args: &[Arg]) -> Option<usize> {
    let rank = |a: &Arg| if ENTITY_ARGS.contains(&a.name.as_str()) { 0 } else if ARGS.contains(&a.name.as_str()) { 1 } else { 2 };
    (0..args.len()).min_by_key(|i| (rank(&args[*i]), *i))
}
/// An argument with a known or unknown name and any value.
pub fn any_arg(s: &mut Src, f: &mut File, depth: usize) -> Arg {
    let name = if s.chance(1, 8) { *s.pick(&["foo", "Message", "messages", "contract", "ink", "topic_", "selecto", "x"]) } else { *s.pick(ARGS) };
    let val = match s.below(9) {
        0..=2 => Val::None,
        3 => Val::Eq(s.pick(&["1", "0x2A", "_", "@", "4_000_000_000", "-1"]).to_string()),
        4 => Val::Eq(s.pick(&["\"a\"", "\"message, selector = 1\"", "\"\"", "\"über\"", "\"ws://127.0.0.1:9000\""]).to_string()),
        5 => Val::Eq(s.pick(&["true", "false"]).to_string()),
        6 => Val::Eq(s.pick(&["crate::Env", "ink::env::DefaultEnvironment", "MyEnv", "Vec<u8>"]).to_string()),
        7 if depth < 2 => Val::Nested(vec![any_arg(s, f, depth + 1)]),
        7 => Val::None,
        _ => Val::Dangling,
    };
    arg(f, name, val)
}
pub fn any_attr(s: &mut Src, f: &mut File) -> Attr {
    let args: Vec<Arg> = (0..s.below(4)).map(|_| any_arg(s, f, 0)).collect();
    let parens = s.bool();
    let mut a = if s.chance(1, 3) {
        let m = *s.pick(MACROS);
        mac(f, m, args)
    } else {
        ink(f, args)
    };
    a.parens = parens || matches!(a.kind, AttrKind::Ink);
    a.trailing_comma = s.chance(1, 5);
    a
}
/// Puts arbitrary ink! attributes on some items and fields.
pub fn sprinkle(s: &mut Src, f: &mut File) {
    let ids = f.ids(|i, _| !matches!(i.kind, Kind::Raw(_)));
    if ids.is_empty() {
        return;
    }
    for _ in 0..s.below(6) {
        let id = *s.pick(&ids);
        let a = any_attr(s, f);
        let (x, y, z) = (s.bool(), s.u32() as usize, s.u32() as usize);
        f.with(id, |i| {
            if x {
                if let Some(fs) = i.fields_mut().filter(|fs| !fs.is_empty()) {
                    let n = fs.len();
                    let at = &mut fs[y % n].attrs;
                    let k = z % (at.len() + 1);
                    at.insert(k, a);
                    return;
                }
            }
            let k = z % (i.attrs.len() + 1);
            i.attrs.insert(k, a);
        });
    }
}
/// All attributes of a file, with those of the same item or field.
pub fn attr_lists(f: &File) -> Vec<Vec<Attr>> {
    let mut out = vec![];
    f.walk(|i, _| {
        out.push(i.attrs.clone());
        out.extend(i.fields().iter().map(|f| f.attrs.clone()));
    });
    out
}
