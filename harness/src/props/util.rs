//! Shared helpers for the oracles.
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use ink_analyzer::{Analysis, Diagnostic, TextEdit, TextRange, TextSize, Version};

pub fn ver(v5: bool) -> Version {
    if v5 {
        Version::V5
    } else {
        Version::V4
    }
}
pub fn analyze(text: &str, v5: bool) -> Analysis {
    set_current(text);
    Analysis::new(text, ver(v5))
}
pub fn r(range: TextRange) -> (usize, usize) {
    (usize::from(range.start()), usize::from(range.end()))
}
pub fn tr(a: usize, b: usize) -> TextRange {
    TextRange::new(TextSize::from(a as u32), TextSize::from(b as u32))
}
pub fn ts(a: usize) -> TextSize {
    TextSize::from(a as u32)
}
pub fn show_diag(text: &str, d: &Diagnostic) -> String {
    let (a, b) = r(d.range);
    format!("{:?} {}..{} `{}`: {}", d.severity, a, b, text.get(a..b).unwrap_or("<out of bounds>"), d.message)
}
pub fn show_diags(text: &str, ds: &[Diagnostic]) -> String {
    ds.iter().map(|d| show_diag(text, d)).collect::<Vec<_>>().join("\n")
}
/// The kind of a message: quoted/backticked parts and digits removed, so that it can serve as a signature.
pub fn msg_kind(m: &str) -> String {
    let mut out = String::new();
    let mut inq = false;
    for c in m.chars() {
        if c == '`' || c == '\'' {
            inq = !inq;
            out.push('`');
        } else if !inq {
            out.push(c);
        }
    }
    normalize(out.trim())
}
pub fn has_parse_error(text: &str) -> bool {
    let p = ink_analyzer_ir::syntax::SourceFile::parse(text);
    !p.errors().is_empty()
}
pub fn parse_errors(text: &str) -> Vec<String> {
    ink_analyzer_ir::syntax::SourceFile::parse(text).errors().iter().map(|e| e.to_string()).collect()
}
/// Applies a set of edits as one unit (LSP semantics); None if they overlap or are out of bounds.
pub fn apply(text: &str, edits: &[TextEdit]) -> Option<String> {
    let mut es: Vec<(usize, usize, usize, &str)> = edits
        .iter()
        .enumerate()
        .map(|(i, e)| (usize::from(e.range.start()), usize::from(e.range.end()), i, e.text.as_str()))
        .collect();
    es.sort_by_key(|e| (e.0, e.1, e.2));
    let mut out = String::new();
    let mut pos = 0;
    for (a, b, _, t) in es {
        if a < pos || b < a {
            return None;
        }
        out.push_str(text.get(pos..a)?);
        text.get(a..b)?;
        out.push_str(t);
        pos = b;
    }
    out.push_str(text.get(pos..)?);
    Some(out)
}
pub fn labels_for(f: &File) -> Vec<String> {
    let mut roles: Vec<String> = Vec::new();
    f.walk(|i, _| roles.push(format!("{:?}", i.role)));
    roles.sort();
    roles.dedup();
    let mut out: Vec<String> = roles.into_iter().map(|r| format!("has:{r}")).collect();
    out.push(if f.v5 { "v5".into() } else { "v4".into() });
    out
}
pub fn clip(s: &str) -> String {
    if s.len() > 900 {
        let mut e = 900;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    } else {
        s.to_string()
    }
}
#[allow(unused)]
pub fn quick_opts() -> Opts {
    Opts::default()
}
/// The tokens of a Rust text, without whitespace and (plain) comments; doc comments have their inner whitespace normalized.
pub fn tokens(text: &str) -> Vec<String> {
    use ink_analyzer_ir::syntax::{AstNode, SyntaxKind};
    let f = ink_analyzer_ir::syntax::SourceFile::parse(text).tree();
    f.syntax()
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .filter(|t| t.kind() != SyntaxKind::WHITESPACE)
        .filter_map(|t| {
            if t.kind() == SyntaxKind::COMMENT {
                is_doc(t.text()).then(|| t.text().split_whitespace().collect::<Vec<_>>().join(" "))
            } else {
                Some(t.text().to_string())
            }
        })
        .collect()
}
pub fn is_doc(c: &str) -> bool {
    c.starts_with("//!") || c.starts_with("/*!") || (c.starts_with("///") && !c.starts_with("////")) || (c.starts_with("/**") && !c.starts_with("/***") && c != "/**/")
}
/// The plain comments of a text, whitespace-normalized.
pub fn plain_comments(text: &str) -> Vec<String> {
    use ink_analyzer_ir::syntax::{AstNode, SyntaxKind};
    let f = ink_analyzer_ir::syntax::SourceFile::parse(text).tree();
    f.syntax()
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .filter(|t| t.kind() == SyntaxKind::COMMENT && !is_doc(t.text()))
        .map(|t| t.text().split_whitespace().collect::<Vec<_>>().join(" "))
        .collect()
}
/// Human-readable first difference of two token lists.
pub fn diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let w = |x: &[String]| x[i.saturating_sub(4)..(i + 8).min(x.len())].join(" ");
    format!("token {i} (of {} and {}):\n  {}\n  {}", a.len(), b.len(), w(a), w(b))
}
