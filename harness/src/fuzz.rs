//! Adversarial document texts: mutated valid files, token soups and special shapes.

use crate::core::Src;
use crate::gen::*;
use crate::model::*;

pub const DICT: &[&str] = &[
    "#", "[", "]", "(", ")", "{", "}", ",", ";", ":", "::", "=", "->", "<", ">", "&", "*", "_", "@", "!", "'a", "?", "..", ".", "|", "\"", "'", "#!", "#![",
    "ink", "ink_e2e", "ink::", "ink::contract", "ink::test", "ink::storage_item", "ink::trait_definition", "ink::chain_extension", "ink::event",
    "ink::scale_derive", "ink_e2e::test", "ink::unknown", "contract", "storage", "event", "topic", "anonymous", "impl", "constructor", "message", "selector", "payable",
    "default", "namespace", "extension", "function", "handle_status", "derive", "env", "environment", "keep_attr", "additional_contracts", "backend", "node", "url",
    "runtime_only", "sandbox", "signature_topic", "Encode", "Decode", "TypeInfo", "selector=", "selector = _", "selector=@", "selector=0x", "selector = 0xDEADBEEF",
    "derive=true", "env=crate::E", "namespace=\"a\"", "0", "1", "0xFFFF_FFFF", "4294967296", "-1", "1u32", "\"\"", "\"foo\"", "r#\"raw\"#", "b\"x\"", "true", "false",
    "pub", "pub(crate)", "mod", "struct", "enum", "union", "fn", "trait", "type", "const", "use", "self", "super", "crate", "Self", "async", "unsafe", "extern", "where", "for",
    "let", "return", "static", "macro_rules!", "dyn", "as", "&self", "&mut self", "mut", "ErrorCode", "Environment", "FromStatusCode", "scale", "X", "foo", "bar", "E", "T", "__ink_x",
    "#[ink(message)]", "#[ink(constructor)]", "#[ink(storage)]", "#[ink(event)]", "#[ink(topic)]", "#[ink(impl)]", "#[ink::contract]", "#[ink::test]", "#[ink(extension = 1)]", "#[ink(function = 1)]",
    "#[ink]", "#[ink()]", "#[ink(", "#[ink::", "#[ink::]", "#[ink(message, ", "#[ink(selector=)]", "#[ink_e2e::test(backend(node(url = \"ws://x\")))]", "#[ink_e2e::test(backend(", "#[derive(scale::Encode)]", "#[cfg(test)]",
    "#[ink::contract(env=", "#[ink::contract(env = crate::X)]", "#[ink::chain_extension(extension = 1)]", "#[ink::scale_derive(Encode)]", "#[ink::event(anonymous)]",
    "use a::*;", "use super::*;", "use self::x::Y as Z;", "use {a, b::{c as d, *}};", "type X = X;", "type A = B; type B = A;", "mod a { use super::*; }", "use a::*; mod a { use super::*; }", "use crate::a::E;", "pub use b::E;", "use c as a;",
    "mod tests { use super::*; }", "impl X {}", "impl Y for X {}", "fn f() {}", "struct X;", "struct X { a: u8 }", "enum E {}", "trait T {}", "impl ink::env::Environment for E {}", "pub fn m(&self) {}", "pub fn c() -> Self { }",
    "ink::env::get_contract_storage", "self.env().emit_event(X {});", "ink_e2e::build_message::<R>(a.clone()).call(|x| x.m())", "client.call_dry_run(&a, &m, 0, None).await", "client.instantiate(\"x\", &ink_e2e::alice(), c, 0, None).await.expect(\"f\").account_id",
    "/*", "*/", "//", "///", "/** doc */", "//! d", "/* é */", "// 漢字\n", "\n", "\r\n", "\t", " ", "    ", "é", "漢", "🦀", "\u{200b}", "\u{feff}", "\0", "ß",
];

pub fn mutate(s: &mut Src, text: &mut String, n: usize) {
    for _ in 0..n {
        let toks = spans(text);
        if toks.is_empty() {
            text.push_str(*s.pick(DICT));
            continue;
        }
        let k = s.below(toks.len());
        let (a, b) = toks[k];
        match s.below(11) {
            0 => text.replace_range(a..b, ""),
            1 => {
                let m = (k + s.range(1, 12)).min(toks.len() - 1);
                let e = toks[m].1;
                text.replace_range(a..e, "");
            }
            2 => {
                let d = *s.pick(DICT);
                text.insert_str(a, d);
            }
            3 => {
                let d = *s.pick(DICT);
                text.insert_str(b, &format!(" {d} "));
            }
            4 => {
                let d = *s.pick(DICT);
                text.replace_range(a..b, d);
            }
            5 => {
                let j = s.below(toks.len());
                let t = text[toks[j].0..toks[j].1].to_string();
                text.replace_range(a..b, &t);
            }
            6 => {
                let m = (k + s.range(1, 20)).min(toks.len() - 1);
                let t = text[a..toks[m].1].to_string();
                let j = s.below(toks.len());
                text.insert_str(toks[j].1, &format!(" {t} "));
            }
            7 => text.truncate(b),
            8 => {
                text.replace_range(..a, "");
            }
            9 => {
                // Split a token in two (half-typed).
                let mid = text[a..b].char_indices().map(|(i, _)| i).nth(1).map(|i| a + i).unwrap_or(b);
                text.replace_range(mid..b, "");
            }
            _ => {
                let m = (k + s.range(1, 40)).min(toks.len() - 1);
                let e = toks[m].1;
                let t: Vec<String> = toks[k..=m].iter().map(|r| text[r.0..r.1].to_string()).collect();
                text.replace_range(a..e, &t.concat());
            }
        }
        if text.len() > 20000 {
            let mut e = 20000;
            while !text.is_char_boundary(e) {
                e -= 1;
            }
            text.truncate(e);
        }
    }
}

/// Rough token spans (identifier runs or single characters), whitespace skipped.
pub fn spans(t: &str) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut it = t.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if c.is_whitespace() {
            continue;
        }
        let mut e = i + c.len_utf8();
        if c.is_alphanumeric() || c == '_' {
            while let Some((_, d)) = it.peek().copied() {
                if d.is_alphanumeric() || d == '_' {
                    it.next();
                    e += d.len_utf8();
                } else {
                    break;
                }
            }
        }
        out.push((i, e));
    }
    out
}

const SHAPES: &[&str] = &[
    "",
    "#[ink::contract]",
    "#[ink(message)]",
    "use a::*; pub mod a { pub use super::*; #[ink::contract(env = super::X)] mod c { use super::*; impl T for S { #[ink(message)] fn f(&self) {} } } }",
    "use a::*; use b::*; mod a { use super::b::*; } mod b { use super::a::*; } #[ink::chain_extension] trait C { type ErrorCode = E; #[ink(extension = 1)] fn f(x: Q) -> R; }",
    "type A = B; type B = A; #[ink::chain_extension] pub trait C { type ErrorCode = A; #[ink(extension=1)] fn f(a: A) -> B; }",
    "use crate::X as Y; use crate::Y as X; #[ink::contract(env = Y)] mod c {}",
    "mod a { pub use crate::b::E; } mod b { pub use crate::a::E; } #[ink::contract(env = crate::a::E)] mod c { impl crate::a::E for S { #[ink(message)] fn m(&self) {} } }",
    "use self::E; #[ink::contract(env = self::E)] mod c { use super::E; }",
    "use x::y; use y::x; #[derive(x::Encode)] struct S; #[ink::chain_extension] trait C { type ErrorCode = S; }",
    "use scale as s; use s as scale; #[derive(s::Encode, scale::Decode)] struct S; #[ink::chain_extension] trait C { type ErrorCode = S; }",
    "#[ink::contract] mod c { use super::*; type Environment = Environment; impl Environment for E {} #[ink(storage)] pub struct S {} }",
    "use super::super::x; use super::*; #[ink::contract(env = super::super::E)] mod c {}",
    "#[ink::contract] mod c; #[ink::contract] fn x() {} #[ink::contract] #[ink::contract] #[ink(message)] mod d { #[ink(storage)] #[ink(storage)] fn s() {} }",
];

/// An arbitrary document text.
pub fn fuzz_text(s: &mut Src, v5: bool) -> (String, &'static str) {
    let (t, k) = fuzz_text_raw(s, v5);
    if parser_panics(&t) {
        (String::new(), "rust parser panic (skipped)")
    } else {
        (t, k)
    }
}

/// The Rust parser that the analyser depends on panics on some token soups (a listed finding of C01);
/// the other checks skip those.
pub fn parser_panics(t: &str) -> bool {
    // The panic needs a float that starts or ends with a dot or exponent.
    if !t.contains('.') {
        return false;
    }
    let r = std::panic::catch_unwind(|| {
        ink_analyzer_ir::syntax::SourceFile::parse(t);
    });
    crate::core::take_panic();
    r.is_err()
}

pub fn fuzz_text_raw(s: &mut Src, v5: bool) -> (String, &'static str) {
    match s.weighted(&[10, 4, 3, 2, 2, 1]) {
        0 => {
            let migratable = s.bool();
            let f = valid_file(s, v5, Opts { migratable, ..Opts::default() });
            let style = Style::random(s);
            let mut t = render(&f, s, &style).text;
            let n = s.range(1, 8);
            mutate(s, &mut t, n);
            (t, "mutated")
        }
        1 => {
            let n = s.range(1, 60);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(*s.pick(DICT));
                if s.chance(2, 3) {
                    t.push(' ');
                }
            }
            (t, "soup")
        }
        2 => {
            let f = valid_file(s, v5, Opts::default());
            let style = Style::random(s);
            (render(&f, s, &style).text, "valid")
        }
        3 => {
            let mut t = s.pick(SHAPES).to_string();
            let n = s.below(3);
            mutate(s, &mut t, n);
            (t, "shape")
        }
        4 => {
            // Two files spliced.
            let f = valid_file(s, v5, Opts::default());
            let g = valid_file(s, !v5, Opts::default());
            let mut a = render(&f, s, &Style::pretty()).text;
            let b = render(&g, s, &Style::pretty()).text;
            let ta = spans(&a);
            let tb = spans(&b);
            if !ta.is_empty() && !tb.is_empty() {
                let k = s.below(ta.len());
                let j = s.below(tb.len());
                a.truncate(ta[k].1);
                a.push(' ');
                a.push_str(&b[tb[j].0..]);
            }
            (a, "spliced")
        }
        _ => {
            // Deep nesting.
            let open = *s.pick(&["mod a {", "#[ink::contract] mod c {", "#[ink(", "backend(", "[", "{", "fn f() {", "impl X {", "((", "Vec<", "use a::{", "match x {", "trait T {"]);
            let n = s.range(2, 60);
            let mut t = String::new();
            if s.bool() {
                t.push_str("#[ink_e2e::test(");
            }
            for _ in 0..n {
                t.push_str(open);
                t.push(' ');
            }
            let d = *s.pick(DICT);
            t.push_str(d);
            if s.bool() {
                for c in open.chars().rev() {
                    let _ = c;
                }
                let close = if open.ends_with('{') { "}" } else if open.ends_with('(') { ")" } else if open.ends_with('[') { "]" } else { ">" };
                for _ in 0..n {
                    t.push_str(close);
                }
            }
            (t, "nested")
        }
    }
}

/// Interesting offsets of a text (character boundaries).
pub fn offsets(s: &mut Src, t: &str, n: usize) -> Vec<usize> {
    let bounds: Vec<usize> = t.char_indices().map(|(i, _)| i).chain(std::iter::once(t.len())).collect();
    let toks = spans(t);
    // Positions near ink! attributes matter most.
    let hot: Vec<usize> = t.match_indices("ink").map(|(i, _)| i).collect();
    (0..n)
        .map(|_| match s.below(4) {
            0 => *s.pick(&bounds),
            1 if !toks.is_empty() => {
                let k = s.pick(&toks);
                if s_bool2(k) {
                    k.0
                } else {
                    k.1
                }
            }
            _ if !hot.is_empty() => {
                let h = *s.pick(&hot);
                let i = bounds.partition_point(|b| *b < h);
                let d = s.below(30);
                bounds[(i + d).min(bounds.len() - 1)]
            }
            _ => *s.pick(&bounds),
        })
        .collect()
}
fn s_bool2(k: &(usize, usize)) -> bool {
    (k.0 + k.1) % 2 == 0
}
