//! C19: layout and comments do not change the analysis, and it is deterministic.
use super::util::*;
use crate::attrs::*;
use crate::core::*;
use crate::gen::*;
use crate::inject::*;
use crate::model::*;
use ink_analyzer::{Analysis, TextEdit};

pub static PROP: Prop = Prop {
    id: "C19",
    rule: "a case is a file (valid, with injected violations, or with arbitrary ink! attributes) laid out twice: conventionally, and with random spaces, line ends and comments between any tokens; all results must agree token by token, and repeat exactly; non-trivial: the layouts differ and there is at least one diagnostic, action or hint",
    quick: 2500,
    thorough: 100000,
    run,
    fixed: None,
    shrink_evals: 1500,
    assumptions: &["completions are only compared between repeated runs (where a cursor is relative to spaces matters to them)"],
    threads: 8,
};
struct Side<'a> {
    d: &'a Doc,
    a: Analysis,
}
impl Side<'_> {
    /// The tokens covered by a range; for an empty one the token at or after it.
    fn rg(&self, rg: (usize, usize)) -> (usize, usize) {
        let t = &self.d.toks;
        if rg.0 == rg.1 {
            // The last token that ends at or before it, to be independent of spaces.
            let i = t.iter().filter(|t| t.1 <= rg.0).count();
            return (i, usize::MAX);
        }
        let mut i = t.iter().position(|t| t.1 > rg.0).unwrap_or(t.len());
        // The range to remove an argument includes the comma before it or not.
        if t.get(i).is_some_and(|t| &self.d.text[t.0..t.1] == ",") {
            i += 1;
        }
        let j = t.iter().rposition(|t| t.0 < rg.1).map_or(0, |j| j + 1);
        (i, j)
    }
    fn edited(&self, es: &[TextEdit]) -> Result<Vec<String>, Fail> {
        match apply(&self.d.text, es) {
            // An optional comma may stay after the last argument.
            Some(t) => {
                let mut v = tokens(&t);
                for i in (1..v.len()).rev() {
                    if v[i] == ")" && v[i - 1] == "," {
                        v.remove(i - 1);
                    }
                }
                Ok(v)
            }
            None => fail("edits do not apply", format!("{es:?}"), self.d.text.clone()),
        }
    }
    /// All diagnostics: a comparable description, and their edits' outcome.
    fn diags(&self) -> Result<Vec<(String, Vec<(String, Vec<String>)>)>, Fail> {
        let mut out = vec![];
        // Diagnostics with the same range and fixes are reported once.
        let mut seen = vec![];
        for d in self.a.diagnostics() {
            let mut qs = vec![];
            for q in d.quickfixes.iter().flatten() {
                qs.push((format!("{} {:?}", squeeze(&q.label), q.kind), self.edited(&q.edits)?));
            }
            let k = (format!("{:?} {:?}", d.severity, self.rg(r(d.range))), qs.iter().map(|q| q.1.clone()).collect::<Vec<_>>());
            if !qs.is_empty() && seen.contains(&k) {
                continue;
            }
            seen.push(k);
            out.push((format!("{:?} {:?}: {}", d.severity, self.rg(r(d.range)), squeeze(&d.message)), qs));
        }
        Ok(out)
    }
    fn hints(&self) -> Vec<String> {
        self.a.inlay_hints(None).iter().map(|h| format!("{} {:?} {:?} {:?}", h.label, self.rg((usize::from(h.position), usize::from(h.position))), self.rg(r(h.range)), h.detail)).collect()
    }
    fn hover(&self, t: usize) -> Option<String> {
        let (x, y) = self.d.toks[t];
        self.a.hover(tr(x, y)).map(|h| format!("{:?} {}", self.rg(r(h.range)), h.content))
    }
    fn signature(&self, t: usize) -> Vec<String> {
        let (x, y) = self.d.toks[t];
        // Inside the token, if possible.
        let o = (x + 1..y).find(|o| self.d.text.is_char_boundary(*o)).unwrap_or(x);
        self.a.signature_help(ts(o)).iter().map(|h| format!("{} {:?} {:?}", h.label, h.active_parameter, h.parameters)).collect()
    }
    fn actions(&self, t: usize) -> Result<Vec<(String, Vec<String>)>, Fail> {
        let (x, y) = self.d.toks[t];
        let o = (x + 1..y).find(|o| self.d.text.is_char_boundary(*o)).unwrap_or(x);
        // An action that does the same as an earlier one may or may not be offered.
        let mut out: Vec<(String, Vec<String>)> = vec![];
        for a in self.a.actions(tr(o, o)) {
            let e = self.edited(&a.edits)?;
            if a.edits.is_empty() || !out.iter().any(|x| x.1 == e) {
                out.push((format!("{} {:?}", squeeze(&a.label), a.kind), e));
            }
        }
        Ok(out)
    }
}
/// The syntax tree without spaces and plain comments.
///
/// The Rust parser dependency attaches doc comments depending on the plain comments and empty lines after them.
pub fn shape(text: &str) -> Vec<String> {
    use ink_analyzer_ir::syntax::{AstNode, SourceFile, SyntaxKind, WalkEvent};
    let p = SourceFile::parse(text);
    let mut out = vec![format!("{}", p.errors().len())];
    for e in p.tree().syntax().preorder_with_tokens() {
        match e {
            WalkEvent::Enter(n) if n.kind() == SyntaxKind::WHITESPACE => (),
            WalkEvent::Enter(n) if n.kind() == SyntaxKind::COMMENT => {
                let t = n.to_string();
                if is_doc(&t) {
                    out.push(squeeze(&t));
                }
            }
            WalkEvent::Enter(n) if n.as_token().is_some() => out.push(n.to_string()),
            WalkEvent::Enter(n) => out.push(format!("{:?}(", n.kind())),
            WalkEvent::Leave(n) if n.as_node().is_some() => out.push(")".into()),
            WalkEvent::Leave(_) => (),
        }
    }
    out
}
/// Without spaces and comments.
fn squeeze(m: &str) -> String {
    let mut out = String::new();
    let mut it = m;
    while let Some(c) = it.chars().next() {
        if it.starts_with("/*") {
            it = it.find("*/").map_or("", |e| &it[e + 2..]);
        } else if it.starts_with("// ") {
            it = it.find('\n').map_or("", |e| &it[e + 1..]);
        } else {
            if !c.is_whitespace() {
                out.push(c);
            }
            it = &it[c.len_utf8()..];
        }
    }
    out
}
fn first_diff(a: &[String], b: &[String]) -> String {
    let x: Vec<_> = a.iter().filter(|x| !b.contains(x)).collect();
    let y: Vec<_> = b.iter().filter(|x| !a.contains(x)).collect();
    if x.is_empty() && y.is_empty() {
        return format!("different order or multiplicity: {a:?}\nand {b:?}");
    }
    format!("only conventional: {x:?}\nonly otherwise: {y:?}")
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut g = G::new(s, v5, Opts::default());
    g.file();
    let mode = g.s.below(4);
    let mut label = "valid";
    if mode >= 2 {
        label = "violations";
        for _ in 0..g.s.range(1, 3) {
            inject(&mut g, &table());
        }
    }
    let mut f = g.f;
    if mode == 1 || (mode == 3 && s.bool()) {
        label = "arbitrary attributes";
        sprinkle(s, &mut f);
    }
    let compact = s.chance(1, 8);
    let d1 = render(&f, s, &Style { layout: if compact { Layout::Compact } else { Layout::Pretty }, density: 0, comments: false });
    let style = Style { layout: Layout::Wild, density: s.range(1, 6), comments: s.chance(3, 4) };
    let d2 = render(&f, s, &style);
    let input = format!("{}\n// ===== laid out differently:\n{}", d1.text, d2.text);
    let (p, q) = (Side { d: &d1, a: analyze(&d1.text, v5) }, Side { d: &d2, a: analyze(&d2.text, v5) });
    set_current(&input);
    if shape(&d1.text) != shape(&d2.text) {
        return Ok(Info { nontrivial: false, key: 0, labels: vec!["Rust parser differs".into()], sample: String::new(), evals: 1 });
    }
    let mut evals = 1;
    // Repetition.
    let again = analyze(&d2.text, v5);
    if format!("{:?}", again.diagnostics()) != format!("{:?}", q.a.diagnostics()) {
        return fail("diagnostics do not repeat", format!("{}\nand\n{}", show_diags(&d2.text, &again.diagnostics()), show_diags(&d2.text, &q.a.diagnostics())), d2.text.clone());
    }
    if !v5 && format!("{:?}", again.migrate()) != format!("{:?}", q.a.migrate()) {
        return fail("migration does not repeat", format!("{:?}\n{:?}", again.migrate(), q.a.migrate()), d2.text.clone());
    }
    // Diagnostics.
    let (x, y) = (p.diags()?, q.diags()?);
    evals += 2 * (1 + x.len());
    let heads = |v: &[(String, Vec<(String, Vec<String>)>)]| v.iter().map(|d| d.0.clone()).collect::<Vec<_>>();
    if heads(&x) != heads(&y) {
        return fail("diagnostics differ", first_diff(&heads(&x), &heads(&y)), input);
    }
    for (a, b) in x.iter().zip(&y) {
        let names = |v: &[(String, Vec<String>)]| v.iter().map(|d| d.0.clone()).collect::<Vec<_>>();
        if names(&a.1) != names(&b.1) {
            return fail("quick fixes differ", format!("{}\n{}", a.0, first_diff(&names(&a.1), &names(&b.1))), input);
        }
        for (m, n) in a.1.iter().zip(&b.1) {
            if m.1 != n.1 {
                return fail(format!("quick fix `{}` differs", msg_kind(&m.0)), format!("{} for {}\n{}", m.0, a.0, diff(&m.1, &n.1)), input);
            }
        }
    }
    // Hints.
    if p.hints() != q.hints() {
        return fail("hints differ", first_diff(&p.hints(), &q.hints()), input);
    }
    let mut some = !x.is_empty() || !p.hints().is_empty();
    // Places.
    let n = d1.toks.len();
    let inks: Vec<usize> = (0..n).filter(|t| &d1.text[d1.toks[*t].0..d1.toks[*t].1] == "ink").collect();
    for _ in 0..6 {
        if n == 0 {
            break;
        }
        let t = if s.bool() || inks.is_empty() { s.below(n) } else { (*s.pick(&inks) + s.below(6)).saturating_sub(2).min(n - 1) };
        let tok = &d1.text[d1.toks[t].0..d1.toks[t].1];
        evals += 6;
        if p.hover(t) != q.hover(t) {
            return fail("hover differs", format!("token {t} `{tok}`: {:?}\n{:?}", p.hover(t), q.hover(t)), input);
        }
        if p.signature(t) != q.signature(t) && tok.chars().nth(1).is_some() {
            return fail("signature help differs", format!("token {t} `{tok}`: {:?}\n{:?}", p.signature(t), q.signature(t)), input);
        }
        if tok.chars().nth(1).is_some() {
            let (a, b) = (p.actions(t)?, q.actions(t)?);
            some |= !a.is_empty();
            let names = |v: &[(String, Vec<String>)]| v.iter().map(|d| d.0.clone()).collect::<Vec<_>>();
            if names(&a) != names(&b) {
                return fail("actions differ", format!("token {t} `{tok}`: {}", first_diff(&names(&a), &names(&b))), input);
            }
            for (m, n) in a.iter().zip(&b) {
                if m.1 != n.1 {
                    return fail(format!("action `{}` differs", msg_kind(&m.0)), format!("token {t} `{tok}`: {}\n{}", m.0, diff(&m.1, &n.1)), input);
                }
            }
        }
        let o = d2.toks[t].1;
        if format!("{:?}", q.a.completions(ts(o))) != format!("{:?}", again.completions(ts(o))) {
            return fail("completions do not repeat", format!("{o}"), d2.text.clone());
        }
    }
    // Migration.
    if !v5 {
        let (a, b) = (p.edited(&p.a.migrate())?, q.edited(&q.a.migrate())?);
        if a != b {
            return fail("migration differs", diff(&a, &b), input);
        }
    }
    Ok(Info { nontrivial: some && d1.text != d2.text, key: fnv(input.as_bytes()), labels: vec![label.into(), if v5 { "v5".into() } else { "v4".into() }], sample: clip(&d2.text), evals })
}
